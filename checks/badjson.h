// rapidjson checks its callers with this macro only: wrong use is undefined otherwise.
#pragma once
void badJson(const char *what);
#define RAPIDJSON_ASSERT(x) ((x) ? (void)0 : badJson(#x))
