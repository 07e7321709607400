#define main chrono_cli_main
#include "time.cpp"
