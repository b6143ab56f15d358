typedef long time_t; typedef long clock_t; time_t time(time_t *); clock_t clock(void); struct timespec { long tv_sec; long tv_nsec; };
int clock_gettime(int, struct timespec *);
