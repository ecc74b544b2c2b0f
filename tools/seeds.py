VM = r'''
#include <stdio.h>
#include <string.h>
#include "rlib/rmem.h"
#include "rlib/rutf.h"
#include "rvm/rvmcpu.h"
#define FAILIF(c) do { if (c) { printf("wrong: %s\n", #c); return 1; } } while (0)
'''
SEEDS = [
    dict(id='utf8-truncated-3', property='C01', needs='a three-byte sequence cut after its second byte, followed in memory by a continuation byte',
         what_it_breaks='the decoder reads one byte past the end of its input',
         edits=[('rlib/rutf.c', 'if (n < 3 ||', 'if (n < 2 ||')],
         demo=VM + r'''
int main(void) {
    unsigned char b[4] = { 0xE2, 0x82, 0xAC, 0 };
    ruint32 w = 0;
    FAILIF(r_utf8_mbtowc(&w, b, b + 2) != 1);
    FAILIF(r_utf8_mbtowc(&w, b, b + 3) != 3);
    return 0;
}
'''),
    dict(id='array-grow-zero', property='C02', needs='growing an array that was full, then exposing the slots without writing them',
         what_it_breaks='storage gained by growth is not all zeroed',
         edits=[('rlib/rarray.c', '0, (array->alloc_size - old_len) * array->elt_size);', '0, (array->alloc_size - old_len - 1) * array->elt_size);')],
         demo=VM + r'''
#include "rlib/rarray.h"
int main(void) {
    int n;
    for (n = 3; n < 200; n++) {
        char *junk = r_malloc(4096), *q; rarray_t *a; size_t i, j;
        memset(junk, 0x5a, 4096);
        r_free(junk);
        a = r_array_create(16);
        r_array_setlength(a, n);
        for (i = 0; i < n; i++) { q = (char*)r_array_slot(a, i); for (j = 0; j < 16; j++) FAILIF(q[j] != 0); }
        FAILIF(a->alloc_size < n);
        for (i = n; i < a->alloc_size; i++) { q = (char*)r_array_slot(a, i); for (j = 0; j < 16; j++) FAILIF(q[j] != 0); }
        r_array_destroy(a);
    }
    return 0;
}
'''),
    dict(id='array-move-overlap', property='C02', needs='a block moved up within the array over a distance of four or more that overlaps itself',
         what_it_breaks='overlapping upward moves copy already overwritten elements',
         edits=[('rlib/rarray.c', 'if (dst < src) {', 'if (dst < src || dst - src > 3) {')],
         demo=VM + r'''
#include "rlib/rarray.h"
int main(void) {
    int i; rarray_t *a = r_array_create(sizeof(int));
    for (i = 0; i < 12; i++) r_array_add(a, &i);
    r_array_move(a, 5, 1, 6);
    for (i = 0; i < 12; i++) FAILIF(r_array_index(a, i, int) != (i >= 5 && i < 11 ? i - 4 : i));
    return 0;
}
'''),
    dict(id='muls-carry', property='C08', needs='a product that overflows while the first factor is smaller than the second',
         what_it_breaks='MULS misses the carry for some overflowing products',
         edits=[('rvm/rvmcpu.c', 'RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, op2 && (res / op2) != op3);\n\tRVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);', 'RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 && (res / op2) != op3);\n\tRVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);')],
         demo=VM + r'''
int main(void) {
    rvmcpu_t *cpu = rvm_cpu_create_default();
    rvm_asmins_t p[3];
    RVM_CPUREG_SETU(cpu, R1, 6);
    RVM_CPUREG_SETU(cpu, R2, ((ruword)1 << 63) + 7);
    p[0] = rvm_asm(RVM_MULS, R0, R1, R2, 0);
    p[1] = rvm_asm(RVM_EXT, R0, XX, XX, 0);
    rvm_cpu_exec(cpu, p, 0);
    FAILIF(RVM_CPUREG_GETU(cpu, R0) != 42);
    FAILIF(!(cpu->status & RVM_STATUS_C));
    rvm_cpu_destroy(cpu);
    return 0;
}
'''),
    dict(id='pushm-half', property='C09', needs='a register mask whose low half holds only register 7',
         what_it_breaks='PUSHM skips register 7 when it is the only low register in the mask',
         edits=[('rvm/rvmcpu.c', 'if (!(bits & ((1<<(RVM_REGS_NUM / 2)) - 1)))\n\t\ti = RVM_REGS_NUM / 2;', 'if (!(bits & ((1<<(RVM_REGS_NUM / 2 - 1)) - 1)))\n\t\ti = RVM_REGS_NUM / 2;')],
         demo=VM + r'''
int main(void) {
    rvmcpu_t *cpu = rvm_cpu_create_default();
    rvm_asmins_t p[3]; ruword sp; int m;
    for (m = 1; m < 0x200; m++) {
        int k, n = 0;
        if (m & (1 << 6 | 0)) ;
        for (k = 0; k < 9; k++) { RVM_CPUREG_SETU(cpu, k, 1000 + k); n += m >> k & 1; }
        RVM_CPUREG_SETU(cpu, SP, 10);
        p[0] = rvm_asm(RVM_PUSHM, DA, XX, XX, m & ~(1 << 8));
        p[1] = rvm_asm(RVM_EXT, R0, XX, XX, 0);
        n = 0;
        for (k = 0; k < 8; k++) n += m >> k & 1;
        rvm_cpu_exec(cpu, p, 0);
        FAILIF(RVM_CPUREG_GETU(cpu, SP) != 10 + n);
    }
    rvm_cpu_destroy(cpu);
    return 0;
}
'''),
    dict(id='sts-bound', property='C09', needs='a store to the stack slot just past the end',
         what_it_breaks='a store to the word past the stack is let through',
         edits=[('rvm/rvmcpu.h', '((__sp__) < (__cpu__)->stacksize ? 1 : 0)', '((__sp__) <= (__cpu__)->stacksize ? 1 : 0)')],
         demo=VM + r'''
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
int main(void) {
    rvmcpu_t *cpu = rvm_cpu_create(100); int st;
    rvm_asmins_t p[3];
    p[0] = rvm_asm(RVM_ADDRS, R0, DA, XX, 100);
    p[1] = rvm_asm(RVM_EXT, R0, XX, XX, 0);
    if (fork() == 0) { close(2); rvm_cpu_exec(cpu, p, 0); _exit(0); }
    wait(&st);
    FAILIF(!WIFSIGNALED(st));
    return 0;
}
'''),
    dict(id='bxgre-equal', property='C10', needs='the register form of branch-if-greater executed after an equal comparison',
         what_it_breaks='BXGRE also branches when the compared values are equal',
         edits=[('rvm/rvmcpu.c', '''	if ((cpu->status & RVM_STATUS_N) == 0 && (cpu->status & RVM_STATUS_Z) == 0) {
		RVM_CPUREG_SETIP(cpu, PC, RVM_CPUREG_GETIP(cpu, ins->op1));''', '''	if ((cpu->status & RVM_STATUS_N) == 0) {
		RVM_CPUREG_SETIP(cpu, PC, RVM_CPUREG_GETIP(cpu, ins->op1));''')],
         demo=VM + r'''
static unsigned long go(rword a, rword b) {
    rvmcpu_t *cpu = rvm_cpu_create_default();
    rvm_asmins_t p[6];
    unsigned long r;
    RVM_CPUREG_SETU(cpu, R1, a);
    RVM_CPUREG_SETU(cpu, R2, b);
    RVM_CPUREG_SETIP(cpu, R3, &p[3]);
    p[0] = rvm_asm(RVM_MOV, R0, DA, XX, 7);
    p[1] = rvm_asm(RVM_CMP, R1, R2, XX, 0);
    p[2] = rvm_asm(RVM_BXGRE, R3, XX, XX, 0);
    p[3] = rvm_asm(RVM_MOV, R0, DA, XX, 9);
    p[4] = rvm_asm(RVM_EXT, R0, XX, XX, 0);
    rvm_cpu_exec(cpu, p, 0);
    r = RVM_CPUREG_GETU(cpu, R0);
    rvm_cpu_destroy(cpu);
    return r;
}
int main(void) {
    FAILIF(go(5, 4) != 7);
    FAILIF(go(4, 5) != 9);
    FAILIF(go(5, 5) != 9);
    return 0;
}
'''),
    dict(id='replaceins-far', property='C11', needs='replacing an instruction in a program of more than 65536 instructions',
         what_it_breaks='the instruction replaced is not the one named',
         edits=[('rvm/rvmcodegen.c', 'return r_array_replace(cg->code, index, &ins);', 'return r_array_replace(cg->code, (ruint16)index, &ins);')],
         demo=VM + r'''
#include "rvm/rvmcodegen.h"
int main(void) {
    rvm_codegen_t *cg = rvm_codegen_create();
    unsigned long i;
    for (i = 0; i < 66000; i++) rvm_codegen_addins(cg, rvm_asm(RVM_MOV, R0, DA, XX, i));
    rvm_codegen_replaceins(cg, 65600, rvm_asm(RVM_NOP, XX, XX, XX, 0));
    for (i = 0; i < 66000; i++) FAILIF(rvm_codegen_getcode(cg, i)->opcode != (i == 65600 ? RVM_NOP : RVM_MOV));
    FAILIF(rvm_codegen_getcodesize(cg) != 66000);
    rvm_codegen_destroy(cg);
    return 0;
}
'''),
    dict(id='tiplookup-prefix', property='C12', needs='two names in the innermost scope, the later one starting with the earlier one',
         what_it_breaks='the innermost-scope lookup takes a longer name for the one asked',
         edits=[('rvm/rvmscope.c', '''	for (i = scopelen - 1; i >= (int)tipstart; i--) {
		varmap = (rvm_varmap_t*)r_array_slot(scope->varstack, i);
		if (r_strlen(varmap->name) == namesize''', '''	for (i = scopelen - 1; i >= (int)tipstart; i--) {
		varmap = (rvm_varmap_t*)r_array_slot(scope->varstack, i);
		if (r_strlen(varmap->name) >= namesize''')],
         demo=VM + r'''
#include "rvm/rvmscope.h"
int main(void) {
    rvm_scope_t *sc = rvm_scope_create();
    rvm_varmap_t *m;
    rvm_scope_push(sc);
    rvm_scope_addoffset_s(sc, "ab", 1);
    rvm_scope_addoffset_s(sc, "abc", 2);
    m = rvm_scope_tiplookup_s(sc, "ab");
    FAILIF(!m || m->data.offset != 1);
    m = rvm_scope_lookup_s(sc, "ab");
    FAILIF(!m || m->data.offset != 1);
    rvm_scope_destroy(sc);
    return 0;
}
'''),
    dict(id='carray-setlength-edge', property='C03', needs='setting the length of a chunked array to exactly one more than two or more whole chunks',
         what_it_breaks='the storage no longer covers the length',
         edits=[('rlib/rcarray.c', '''	r_carray_checkexpand(carray, len);
	r_carray_length(carray) = len;''', '''	r_carray_checkexpand(carray, len > R_CARRAY_CHUNKSIZE ? len - 1 : len);
	r_carray_length(carray) = len;''')],
         demo=VM + r'''
#include "rlib/rcarray.h"
int main(void) {
    unsigned long n;
    for (n = 0; n < 600; n++) {
        rcarray_t *a = r_carray_create(sizeof(long));
        r_carray_setlength(a, n);
        FAILIF(a->len != n);
        FAILIF(a->alloc_size < n);
        FAILIF(r_array_length(a->array) * R_CARRAY_CHUNKSIZE < n);
        r_carray_destroy(a);
    }
    return 0;
}
'''),
    dict(id='list-splice-back', property='C04', needs='splicing a list of two or more members into a list that already has members, then walking backwards',
         what_it_breaks='the backward links skip the spliced members',
         edits=[('rlib/rlist.c', '		at->prev = last;', '		at->prev = (at == phead) ? last : first;')],
         demo=VM + r'''
#include "rlib/rlist.h"
int main(void) {
    rlist_t h, g, n[4], *p; int i = 0;
    r_list_init(&h); r_list_init(&g);
    r_list_addt(&h, &n[0]);
    r_list_addt(&g, &n[1]); r_list_addt(&g, &n[2]); r_list_addt(&g, &n[3]);
    r_list_splice(&g, &h);
    static const int want[4] = { 1, 2, 3, 0 };
    r_list_foreach(p, &h) { FAILIF(i > 3 || p != &n[want[i]]); i++; }
    FAILIF(i != 4);
    r_list_foreachreverse(p, &h) { i--; FAILIF(i < 0 || p != &n[want[i]]); }
    FAILIF(i != 0);
    FAILIF(!r_list_empty(&g));
    return 0;
}
'''),
    dict(id='dfa-next-bmp', property='C14', needs='a character above U+FFFF on an automaton with ranges above U+FFFF',
         what_it_breaks='characters outside the basic plane take the transition of another character',
         edits=[('rex/rexdfatypes.h', 'if (((rexchar_t)(__input__)) >= t->lowin) {', 'if (((ruint16)(__input__)) >= t->lowin) {')],
         demo=VM + r'''
#include "rex/rexdfa.h"
int main(void) {
    static const rexchar_t lo[4] = { 0, 0x61, 0x62, 0x1f600 }, hi[4] = { 0x60, 0x61, 0x1f5ff, 0xffffffff };
    static const rexuint_t to[4] = { 0, 1, 0, 2 };
    rexdfa_t *d = rex_dfa_create(3, 4, 0, 0);
    int i;
    for (i = 0; i < 4; i++) { d->trans[i].lowin = lo[i]; d->trans[i].highin = hi[i]; d->trans[i].state = to[i]; }
    d->states[1].trans = 0; d->states[1].ntrans = 4;
    FAILIF(rex_dfa_next(d, 1, 0x61) != 1);
    FAILIF(rex_dfa_next(d, 1, 0x10061) != 0);
    FAILIF(rex_dfa_next(d, 1, 0x1f600) != 2);
    FAILIF(rex_dfa_next(d, 1, 'z') != 0);
    rex_dfa_destroy(d);
    return 0;
}
'''),
    dict(id='stat-room', property='C16', needs='one context used for an input and then for an input exactly one byte longer',
         what_it_breaks='the decoded-character table is one entry too small and is written past its end',
         edits=[('rpa/rpastat.c', 'if (stat->instacksize == 0 || stat->instacksize < size) {', 'if (stat->instacksize == 0 || stat->instacksize + 1 < size) {')],
         demo=VM + r'''
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rpa/rpastatpriv.h"
#include "rlib/rstring.h"
int main(void) {
    const char *g = "R ::= [a-z]+\n";
    const char *in = "abcdefghijklmnopqrstuvwxyz";
    int n;
    rpadbex_t *db = rpa_dbex_create();
    rpastat_t *st;
    rpa_dbex_open(db);
    FAILIF(rpa_dbex_load(db, g, r_strlen(g)) < 0);
    rpa_dbex_close(db);
    FAILIF(rpa_dbex_compile(db) < 0);
    st = rpa_stat_create(db, 4096);
    for (n = 1; n < 26; n++) {
        FAILIF(rpa_stat_match(st, rpa_dbex_first(db), RPA_ENCODING_UTF8, in, in, in + n) != n);
        FAILIF(st->instacksize < n);
    }
    rpa_stat_destroy(st);
    rpa_dbex_destroy(db);
    return 0;
}
'''),
    dict(id='matchrng-icase', property='C16', needs='case-insensitive matching of the last character of a range in its other case',
         what_it_breaks='the range does not accept the other case of its last character',
         edits=[('rpa/rpastat.c', 'in->iwc <= wc2', 'in->iwc < wc2')],
         demo=VM + r'''
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rlib/rstring.h"
int main(void) {
    const char *g = "R ::= [a-z]+\n";
    const char *in = "AbcZzY";
    rpadbex_t *db = rpa_dbex_create();
    rpastat_t *st;
    rpa_dbex_open(db);
    FAILIF(rpa_dbex_load(db, g, r_strlen(g)) < 0);
    rpa_dbex_close(db);
    FAILIF(rpa_dbex_compile(db) < 0);
    st = rpa_stat_create(db, 4096);
    FAILIF(rpa_stat_match(st, rpa_dbex_first(db), RPA_ENCODING_UTF8 | RPA_ENCODING_ICASE, in, in, in + 6) != 6);
    FAILIF(rpa_stat_match(st, rpa_dbex_first(db), RPA_ENCODING_UTF8, in, in, in + 6) != 0);
    rpa_stat_destroy(st);
    rpa_dbex_destroy(db);
    return 0;
}
'''),
    dict(id='cache-far-top', property='C17', needs='an input of more than 65536 characters in which a rule is tried at two positions 65536 apart',
         what_it_breaks='a result remembered at one position is reused at another',
         edits=[('rpa/rpacache.c', 'cache->entry[bucket].top = top;', 'cache->entry[bucket].top = (ruint16)top;')],
         demo=VM + r'''
#include "rpa/rpacache.h"
int main(void) {
    rpacache_t *c = rpa_cache_create();
    rpacachedentry_t *e;
    rpa_cache_invalidate(c);
    rpa_cache_set(c, 12, 7, 3, NULL, 0, 0);
    e = rpa_cache_lookup(c, 12, 7);
    FAILIF(!e || e->ret != 3);
    rpa_cache_set(c, 65536 + 20, 7, 5, NULL, 0, 0);
    FAILIF(rpa_cache_lookup(c, 20, 7));
    e = rpa_cache_lookup(c, 65536 + 20, 7);
    FAILIF(!e || e->ret != 5);
    rpa_cache_destroy(c);
    return 0;
}
'''),
    dict(id='range-63', property='C19', needs='a range of 64 or more characters and an input starting with the one 63 after its first (or a multiple of 64 further)',
         what_it_breaks='the prefilter bitmap of the range excludes that character',
         edits=[('rpa/rpabitmap.c', '''			wc2 = bc->beginchar;
			wc1 = bc->endchar;
		}
		for (wc = wc1; wc <= wc2 && (wc - wc1) < RPA_BITMAP_BITS; wc++) {''', '''			wc2 = bc->beginchar;
			wc1 = bc->endchar;
		}
		for (wc = wc1; wc <= wc2 && (wc - wc1) < RPA_BITMAP_BITS - 1; wc++) {''')],
         demo=VM + r'''
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rlib/rstring.h"
int main(void) {
    const char *g = "R ::= [!-~]+\n";
    char in[2] = { 0, 0 };
    rpadbex_t *db = rpa_dbex_create();
    rpastat_t *st;
    rpa_dbex_open(db);
    FAILIF(rpa_dbex_load(db, g, r_strlen(g)) < 0);
    rpa_dbex_close(db);
    FAILIF(rpa_dbex_compile(db) < 0);
    st = rpa_stat_create(db, 4096);
    for (in[0] = '!'; in[0] < 127; in[0]++)
        FAILIF(rpa_stat_match(st, rpa_dbex_first(db), RPA_ENCODING_UTF8, in, in, in + 1) != 1);
    rpa_stat_destroy(st);
    rpa_dbex_destroy(db);
    return 0;
}
'''),
    dict(id='mem-shrink-inplace', property='C07', needs='a block resized to a size smaller than it has, or larger by less than a word',
         what_it_breaks='the total does not follow the resize, and a block grown by less than a word is too short',
         edits=[('rlib/rmem.c', '''	csize = *mem;
	r_spinlock_lock(&g_lock);
	g_allocmem -= csize;
	r_spinlock_unlock(&g_lock);
	size += sizeof(ruword);
	mem =''', '''	csize = *mem;
	if (size <= csize)
		return ptr;
	r_spinlock_lock(&g_lock);
	g_allocmem -= csize;
	r_spinlock_unlock(&g_lock);
	size += sizeof(ruword);
	mem =''')],
         demo=VM + r'''
int main(void) {
    long a, b;
    char *p = r_malloc(100);
    a = r_debug_get_allocmem();
    p = r_realloc(p, 104);
    b = r_debug_get_allocmem();
    FAILIF(b - a != 4);
    p = r_realloc(p, 10);
    FAILIF((long)r_debug_get_allocmem() - b != -94);
    r_free(p);
    return 0;
}
'''),
    dict(id='ref-drop-two', property='C07', needs='an object with two references of which one is dropped',
         what_it_breaks='a counted object is destroyed while a reference is left',
         edits=[('rlib/rref.c', '''		ref->count -= 1;
		if (!ref->count) {''', '''		if (!(--ref->count & ~1u)) {''')],
         demo=VM + r'''
#include "rlib/rref.h"
static int dead;
static void gone(robject_t *obj) { dead = 1; r_ref_cleanup(obj); }
int main(void) {
    rref_t *ref = r_ref_create(RREF_TYPE_SHARED);
    ((robject_t*)ref)->cleanup = gone;
    FAILIF(r_ref_inc(ref) != 2);
    FAILIF(r_ref_inc(ref) != 3);
    FAILIF(r_ref_dec(ref) != 2);
    FAILIF(r_ref_dec(ref) != 1);
    FAILIF(dead);
    FAILIF(r_ref_dec(ref) != 0);
    FAILIF(!dead);
    return 0;
}
'''),
    dict(id='negative-low', property='C13', needs='the negation of a class whose first character is 1',
         what_it_breaks='the negated class does not accept character 0',
         edits=[('rex/rextransition.c', 'if (t->lowin != 0) {', 'if (t->lowin > REX_CHAR_MIN + 1) {')],
         demo=VM + r'''
#include "rex/rextransition.h"
int main(void) {
    rarray_t *s = r_array_create(sizeof(rex_transition_t)), *d = r_array_create(sizeof(rex_transition_t));
    rex_transitions_add(s, 1, 'x', 3, 4);
    rex_transitions_negative(d, s, 3, 4);
    FAILIF(rex_transitions_find(d, 0) == NULL);
    FAILIF(rex_transitions_find(d, 1) != NULL);
    FAILIF(rex_transitions_find(d, 'x') != NULL);
    FAILIF(rex_transitions_find(d, 'y') == NULL);
    return 0;
}
'''),
    dict(id='range-reversed', property='C13', needs='a range given from its last character to its first',
         what_it_breaks='the state accepts only the first character of the range',
         edits=[('rex/rextransition.c', '		ntrans.highin = c1;', '		ntrans.highin = ntrans.lowin;')],
         demo=VM + r'''
#include "rex/rextransition.h"
int main(void) {
    rarray_t *s = r_array_create(sizeof(rex_transition_t));
    rex_transitions_add(s, 'z', 'm', 3, 4);
    FAILIF(rex_transitions_find(s, 'm') == NULL);
    FAILIF(rex_transitions_find(s, 'p') == NULL);
    FAILIF(rex_transitions_find(s, 'z') == NULL);
    FAILIF(rex_transitions_find(s, 'a') != NULL);
    return 0;
}
'''),
    dict(id='usertype-toggle', property='C18', needs='toggling a usertype bit that is not set',
         what_it_breaks='the usertype of the record is not the one asked for',
         edits=[('rpa/rparecord.c', 'prec->usertype ^= usertype;', 'prec->usertype &= ~usertype;')],
         demo=VM + r'''
#include "rpa/rparecord.h"
int main(void) {
    rparecord_t r[2];
    rarray_t *a = r_array_create(sizeof(rparecord_t));
    memset(r, 0, sizeof(r));
    r[0].type = RPA_RECORD_START;
    r[1].type = RPA_RECORD_END;
    r[0].usertype = r[1].usertype = 5;
    r_array_add(a, &r[0]);
    r_array_add(a, &r[1]);
    rpa_record_setusertype(a, 1, 6, RVALSET_XOR);
    FAILIF(rpa_record_getusertype(a, 0) != 3);
    FAILIF(((rparecord_t*)r_array_slot(a, 1))->usertype != 3);
    return 0;
}
'''),
]
