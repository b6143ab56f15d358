int strcasecmp(const char *, const char *);
