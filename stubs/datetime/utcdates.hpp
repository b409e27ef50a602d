#ifndef VSTUB_UTC
#define VSTUB_UTC
#include "datetime/dtcalendar.hpp"
#endif
