unsigned long use(unsigned char *p) { return crc32(p, 4, 0); }
