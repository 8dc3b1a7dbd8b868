#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
void vp_fill(void *p, size_t n, uint64_t seed);
void *vp_new(size_t n);
void vp_hex(const char *path, const void *p, size_t n);
void vp_s(const char *path, long long v);
void vp_u(const char *path, unsigned long long v);
void vp_t(const char *text);
void vp_walk(size_t source, const char *kind, const char *name, const void *obj, size_t size);
void vp_program(void);
