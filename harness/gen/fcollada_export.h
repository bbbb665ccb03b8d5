/* Stand-in for the header CMake generates for a static build. */
#ifndef FCOLLADA_EXPORT_H
#define FCOLLADA_EXPORT_H
#define FCOLLADA_EXPORT
#define FCOLLADA_NO_EXPORT
#define FCOLLADA_DEPRECATED __attribute__((__deprecated__))
#define FCOLLADA_DEPRECATED_EXPORT FCOLLADA_DEPRECATED
#define FCOLLADA_DEPRECATED_NO_EXPORT FCOLLADA_DEPRECATED
#endif
