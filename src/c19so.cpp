#include "c19mod.hpp"
extern "C" __attribute__((visibility("default"))) const void* vp_module() { return &m19::ops(); }
