/* stand-in for the configure-generated config.h (portable, no SSE2) */
#define ARCH_X86_64 1
#define HAVE_BOOST_FUNCTIONAL_HASH_HPP 1
#define HAVE_MMAP 1
#define HAVE_GETPAGESIZE 1
#define PACKAGE "alfalfa"
#define VERSION "0.1"
