#include "live555.hh"
class Locale { public: Locale(char const*, int = 0) {} };
