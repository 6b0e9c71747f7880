/* glibc asks for this header when compiling for i386 */
