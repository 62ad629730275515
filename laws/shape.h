// the vocabulary of laws analysed in shape mode
#ifndef SHAPE_H
#define SHAPE_H
#define NT __attribute__((nothrow))
extern "C" {
float law_in(const char *, int) NT __attribute__((const));
float law_pos(const char *, int) NT __attribute__((const));
float law_range(const char *, int, double, double) NT __attribute__((const));
float law_quarter(int) NT __attribute__((const));
int law_ini(const char *, int) NT __attribute__((const));
bool law_inb(const char *, int) NT __attribute__((const));
int law_pick(const char *, int) NT __attribute__((const));  // one of 0..n-1, all of them are analysed
void law_eq(const char *, double, double) NT;
void law_eqi(const char *, long, long) NT;
void law_true(const char *, bool) NT;
void law_assume(bool) NT;
void law_throws_iff(const char *, bool) NT;
int law_dtok(double, long, int) NT;
}
#define LAW extern "C" __attribute__((used)) void
#endif
