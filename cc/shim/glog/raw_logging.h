#pragma once
#include <cstdio>
#include <cstdlib>
#define RAW_LOG_INFO(...) do { if (0) std::fprintf(stderr, __VA_ARGS__); } while (0)
#define RAW_LOG_WARNING(...) do { if (0) std::fprintf(stderr, __VA_ARGS__); } while (0)
#define RAW_LOG_ERROR(...) do { std::fprintf(stderr, "E "); std::fprintf(stderr, __VA_ARGS__); std::fprintf(stderr, "\n"); } while (0)
#define RAW_LOG_FATAL(...) do { std::fprintf(stderr, "F "); std::fprintf(stderr, __VA_ARGS__); std::fprintf(stderr, "\n"); std::abort(); } while (0)
