/* Included first in everything a harness compiles. */

#ifdef VP_CBMC
/* The CBMC front end does not lower these builtins when they are the value of a statement
   expression; give them a variable of their own. */
# define __builtin_add_overflow(a, b, d) ({ _Bool vp_ov = __builtin_add_overflow(a, b, d); vp_ov; })
# define __builtin_sub_overflow(a, b, d) ({ _Bool vp_ov = __builtin_sub_overflow(a, b, d); vp_ov; })
# define __builtin_mul_overflow(a, b, d) ({ _Bool vp_ov = __builtin_mul_overflow(a, b, d); vp_ov; })

/* The do-nothing callback of the rbtree has the wrong type on purpose (it is called through a
   cast); CBMC resolves calls by type, so give it one. */
# ifdef VP_RB_DUMMY
#  define _BFDEV_CALLBACK_H_
#  define bfdev_dummy_noop ((void *)vp_noop2)
void vp_noop2(void *, void *);
# endif
#endif

/* Schedules: before every atomic step of the code under test, the other threads may take any
   number of whole steps of their own (vp_env, chosen by the solver). Sequential consistency. */
#ifdef VP_SCHEDULE
void vp_env(void);
# define __sync_val_compare_and_swap(p, o, n) ({ __typeof__(p) vp_p = (p); __typeof__(*vp_p) vp_o = (o), vp_n = (n), vp_c; vp_env(); vp_c = *vp_p; if (vp_c == vp_o) *vp_p = vp_n; vp_c; })
# define __sync_bool_compare_and_swap(p, o, n) ({ __typeof__(p) vp_q = (p); __typeof__(*vp_q) vp_r = (o); __sync_val_compare_and_swap(vp_q, vp_r, n) == vp_r; })
# define VP_FETCH(p, v, op) ({ __typeof__(p) vp_p = (p); __typeof__(*vp_p) vp_v = (v), vp_c; vp_env(); vp_c = *vp_p; *vp_p = vp_c op vp_v; vp_c; })
# define VP_AFTER(p, v, op) ({ __typeof__(p) vp_p = (p); __typeof__(*vp_p) vp_v = (v), vp_c; vp_env(); vp_c = *vp_p op vp_v; *vp_p = vp_c; vp_c; })
# define __sync_fetch_and_add(p, v) VP_FETCH(p, v, +)
# define __sync_fetch_and_sub(p, v) VP_FETCH(p, v, -)
# define __sync_fetch_and_and(p, v) VP_FETCH(p, v, &)
# define __sync_fetch_and_or(p, v) VP_FETCH(p, v, |)
# define __sync_fetch_and_xor(p, v) VP_FETCH(p, v, ^)
# define __sync_add_and_fetch(p, v) VP_AFTER(p, v, +)
# define __sync_sub_and_fetch(p, v) VP_AFTER(p, v, -)
# define __sync_and_and_fetch(p, v) VP_AFTER(p, v, &)
# define __sync_or_and_fetch(p, v) VP_AFTER(p, v, |)
# define __sync_xor_and_fetch(p, v) VP_AFTER(p, v, ^)
# define BFDEV_READ_ONCE(x) ({ vp_env(); *(volatile __typeof__(x) *)&(x); })
# define BFDEV_WRITE_ONCE(x, val) ({ __typeof__(x) vp_w = (val); vp_env(); *(volatile __typeof__(x) *)&(x) = vp_w; })
#endif
