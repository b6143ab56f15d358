/* ghost types used by contracts only */
#include <stddef.h>
/* where a walk has got to; kept by the contract of the visitor */
struct walk_log {
	long state;              /* last state visited */
	long from, to, sym;      /* last labelled edge visited */
	long efrom, eto;         /* last empty move visited */
	int stopped;             /* the visitor asked to stop */
};
/* how much of its input a machine has been fed; kept by the contract of the getc callback */
struct exec_log {
	long pos;                /* characters delivered so far */
	int ended;               /* end of input reported */
};
/* which state was last given an id; kept by the contract of the function that gives it */
struct id_log {
	long last;
};
