#pragma once
#define DISABLE_CLANG_ONLY_WARNING(x)
