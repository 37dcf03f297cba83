/* lets the C library's headers be used for a 32-bit target */
