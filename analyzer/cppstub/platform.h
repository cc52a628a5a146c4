#define MKDIR(x) mkdir(x, 0755)
