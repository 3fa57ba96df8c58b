// C31: a coroutine that blocks its thread in a system call does not keep the others of its environment from running
#define BLOCKED
#include "C21.cpp"

const Property property = {
    "C31",
    "1-3 coroutines that block their thread in system calls (sleeps, select, waits for a condition variable of the system) until all other participants are done, and 1-5 coroutines on "
    "the same or another environment that do 20 kinds of operation; the scheduling signal interrupts the calls, and in 40% of the cases arrives anywhere; "
    "non-trivial = a coroutine got on while another one was blocked",
    generate, render, run, tune, 12000, 150000};
