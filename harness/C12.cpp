// C12: unbuffered channels.
#define SYNC true
#include "chan.h"

const Property property = {
    "C12",
    "1-4 producers and 1-4 consumers (all API forms, limited or until the end) and closers on a channel of capacity 0; non-trivial = a push "
    "found no waiting pop",
    generate, render, run, nullptr, 24000, 300000};
