unsigned use(unsigned char *p) { return crc16_ccitt(p, 4, 0); }
