// Quantified queries: all / any / how many states satisfy a predicate
source "src/libfsm/walk/all.c";
import "graph.spec";

// what predicate p answers for state i of the machine being queried
logic int pred_val(int p, int i);
logic int npred(int p, int n);
axiom npred_0 auto: forall int p, int n {: npred(p, n) :} . n <= 0 ==> npred(p, n) == 0;
axiom npred_s auto: forall int p, int n {: npred(p, n) :} . n > 0 ==> npred(p, n) == npred(p, n - 1) + (if pred_val(p, n - 1) != 0 then 1 else 0);

fn cb_pred {
	trusted;
	requires 0 <= arg2 < arg1->statecount;
	ensures result == pred_val(self, arg2);
}
fn fsm_all {
	callback predicate = cb_pred on fsm;
	requires fsm_graph(fsm) && predicate != null;
	ensures result == 0 || result == 1;
	ensures yes: result == 1 ==> (forall int i {: pred_val(block(predicate), i) :} {: fsm->states[i].edges :} {: fsm->states[i].epsilons :} . 0 <= i < fsm->statecount ==> pred_val(block(predicate), i) != 0);
	ensures no: result == 0 ==> (exists int i . 0 <= i < fsm->statecount && pred_val(block(predicate), i) == 0);
	loop 1 {
		invariant 0 <= i <= fsm->statecount;
		invariant forall int k {: pred_val(block(predicate), k) :} . 0 <= k < i ==> pred_val(block(predicate), k) != 0;
		variant fsm->statecount - i;
	}
}
source "src/libfsm/walk/has.c";
fn fsm_has {
	callback predicate = cb_pred on fsm;
	requires fsm_graph(fsm) && predicate != null;
	ensures result == 0 || result == 1;
	ensures no: result == 0 ==> (forall int i {: pred_val(block(predicate), i) :} . 0 <= i < fsm->statecount ==> pred_val(block(predicate), i) == 0);
	ensures yes: result == 1 ==> (exists int i . 0 <= i < fsm->statecount && pred_val(block(predicate), i) != 0);
	loop 1 {
		invariant 0 <= i <= fsm->statecount;
		invariant forall int k {: pred_val(block(predicate), k) :} . 0 <= k < i ==> pred_val(block(predicate), k) == 0;
		variant fsm->statecount - i;
	}
}
source "src/libfsm/walk/count.c";
fn fsm_count {
	callback predicate = cb_pred on fsm;
	requires fsm_graph(fsm) && predicate != null;
	ensures n: result == npred(block(predicate), fsm->statecount);
	loop 1 {
		invariant 0 <= i <= fsm->statecount && 0 <= n <= i && n == npred(block(predicate), i);
		variant fsm->statecount - i;
	}
}
