#pragma once
#include "ref.hpp"
struct Prop { const char *id; void (*run)(u64 index, Rng &g); u64 cases; };
