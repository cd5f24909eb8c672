extern const char data[];
