#include "geodesy/ellipsoid.hpp"
