// Stand-in for the header CMake generates (static build of the library's sources: nothing to export).
#ifndef REISERRT_CORE_EXPORT_H
#define REISERRT_CORE_EXPORT_H
#define ReiserRT_Core_EXPORT
#define ReiserRT_Core_NO_EXPORT
#define ReiserRT_Core_DEPRECATED __attribute__((__deprecated__))
#define ReiserRT_Core_DEPRECATED_EXPORT ReiserRT_Core_DEPRECATED
#define ReiserRT_Core_DEPRECATED_NO_EXPORT ReiserRT_Core_DEPRECATED
#endif
