source "src/libfsm/start.c";
import "fsm.spec";
fn fsm_clearstart {
	requires valid(fsm) && fsm != null;
	ensures fsm->hasstart == 0;
	assigns fsm->hasstart;
}
fn fsm_setstart {
	requires fsm_shape(fsm) && 0 <= state < fsm->statecount;
	ensures start: fsm->hasstart == 1 && fsm->start == state;
	ensures fsm_starts(fsm);
	assigns fsm->hasstart, fsm->start;
}
fn fsm_getstart {
	requires fsm_shape(fsm) && fsm_starts(fsm) && start != null && valid(start);
	ensures none: result == 0 <==> fsm->hasstart == 0;
	ensures one: result == 0 || result == 1;
	ensures which: result == 1 ==> *start == fsm->start;
	assigns *start where fsm->hasstart != 0;
}
