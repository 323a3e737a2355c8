/* empty: lets the C library headers be parsed for a 32-bit target */
