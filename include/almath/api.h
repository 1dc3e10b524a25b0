#pragma once
#define ALMATH_API
#define ALMATH_LOCAL
#define ALMATH_API_INTERNAL
#define ALMATH_DEPRECATED
