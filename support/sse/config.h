/* stand-in for the configure-generated config.h (x86-64, SSE2) */
#define ARCH_X86_64 1
#define HAVE_BOOST_FUNCTIONAL_HASH_HPP 1
#define HAVE_MMAP 1
#define HAVE_GETPAGESIZE 1
#define HAVE_SSE2 1
#define PACKAGE "alfalfa"
#define VERSION "0.1"
