/* configuration the real configure script would produce on this platform */
#define HAVE_ENDIAN_H 1
#define HAVE_CLOCK_GETTIME 1
#define PACKAGE_VERSION "0"
