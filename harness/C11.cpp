// C11: buffered and unlimited channels.
#define SYNC false
#include "chan.h"

const Property property = {
    "C11",
    "1-4 producers and 1-4 consumers (all API forms, limited or until the end) and closers on a channel of capacity 1, 2, 3, 8 or unlimited; "
    "non-trivial = a push found the channel full",
    generate, render, run, nullptr, 24000, 300000};
