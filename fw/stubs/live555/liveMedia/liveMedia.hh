#include "../live555.hh"
