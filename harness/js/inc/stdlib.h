#pragma once
#define NULL ((void *)0)
typedef __SIZE_TYPE__ size_t;
void *malloc(size_t);
void *calloc(size_t, size_t);
void free(void *);
