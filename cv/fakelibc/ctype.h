int isalnum(int); int isalpha(int); int isdigit(int); int isprint(int); int isspace(int); int isupper(int); int islower(int); int toupper(int); int tolower(int); int isxdigit(int); int ispunct(int); int iscntrl(int); int isgraph(int); int isblank(int);
