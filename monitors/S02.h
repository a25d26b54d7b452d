// what the two translation units of the S02 program share
#pragma once
#include <mito.h>
#include <mpi.h>
#include <cstdio>
#include <cstdarg>
#include <atomic>
#include <thread>
#include <vector>

// one line of the event log
void event(const char * format, ...);

// a resource that counts its constructions, slow enough to construct for others to interfere
struct Probe {
    static inline std::atomic<int> constructed = 0, destroyed = 0;
    int value;
    Probe(int v = 0) : value(v)
    {
        ++constructed;
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
        event("probe constructed");
    }
    ~Probe()
    {
        ++destroyed;
        event("probe destroyed");
    }
};

// the same things seen from the other translation unit
struct View {
    const void *simulation, *context, *clock;
    int rank, size;
    double time;
};
View other_look();
const void * other_probe(int v);
const void * other_singleton(int which);
int other_library();
