// Reference counts of std::shared_ptr go through functions of rt.cpp: they order threads, but need no scheduling points.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_ATOMIC_BUILTINS
