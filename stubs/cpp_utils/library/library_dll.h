#pragma once
#define CPP_UTILS_DllAPI
#define CPP_UTILS_USERDllExport
