/* plain functions instead of glibc's tables */
#ifndef STUB_CTYPE_H
#define STUB_CTYPE_H
int isspace(int c);
int isdigit(int c);
int isalpha(int c);
int isalnum(int c);
#endif
