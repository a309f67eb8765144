// Runs every (scenario, seed) pair in a child process of its own, under vsched, and prints one JSON line per run:
//   {"id":..., "seed":..., "ev":[{"ev":..,"p":..,"e":..,"s":"..","n":..,"t":..,"ms":..}, ...]}
// The last event is "end" (the scenario ran to its end) or "fault" (deadlock, crash, use after free, ...).
#pragma once
#include <string>
#include "json.h"

void ev(const char* name, int p = 0, int e = 0, const char* s = "", long n = 0, int a = 0);
void ev_raw(const std::string& json);                  // an event record written by the caller
int driver_main(int argc, char** argv, void (*run)(const J& scenario));
