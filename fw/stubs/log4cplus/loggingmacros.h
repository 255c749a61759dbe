#include <log4cplus/logger.h>
