// Minimal stand-in for glog: only what the engine uses.
#pragma once
#include <cstdio>
#include <cstdlib>
