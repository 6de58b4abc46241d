/* C22: json_utils over a model of the file operations (any of which may fail) and of the JSON library's accessors. */
#include <cjson/cJSON.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#define MAXL 300
static unsigned char content[MAXL];
static int L, pos, opened, closed, eof, err;
static int opfault, opno, opfired;
static int fileobj;
static int trip(void) { opno++; if (opno == opfault) { opfired = 1; return 1; } return 0; }
#define VF ((FILE*)&fileobj)
static void isopen(FILE* f) { vp_check(f == VF && opened == 1 && closed == 0, "file operations only on the open file"); }
static FILE* v_fopen(const char* n, const char* m) {
  vp_check(!strcmp(n, "data.json"), "opens the file it was asked for");
  vp_check(m[0] == 'r', "opens for reading");
  if (trip()) return NULL;
  opened++; pos = 0;
  vp_check(opened == 1, "file opened once");
  return VF;
}
static int v_fclose(FILE* f) { isopen(f); closed++; return 0; }
static int v_fseek(FILE* f, long off, int wh) { isopen(f); if (trip()) return -1; pos = (int)(wh == SEEK_SET ? off : wh == SEEK_CUR ? pos + off : L + off); eof = 0; return 0; }
static long v_ftell(FILE* f) { isopen(f); if (trip()) return vp_param("dir") ? 0x7fffffffffffffffL : -1; return pos; }
static void v_rewind(FILE* f) { isopen(f); if (trip()) return; pos = 0; eof = 0; }
static size_t v_fread(void* p, size_t sz, size_t n, FILE* f) {
  size_t want = sz * n, have = (size_t)(L - pos), got, k;
  isopen(f);
  if (sz == 0 || n == 0) return 0;
  got = want < have ? want : have;
  if (trip()) { got = got / 2; err = 1; } else if (want > have) eof = 1;
  for (k = 0; k < got; k++) ((unsigned char*)p)[k] = content[pos + k];
  pos += (int)got;
  return got / sz;
}
static int v_fgetc(FILE* f) { isopen(f); if (trip()) { err = 1; return -1; } if (pos >= L) { eof = 1; return -1; } return content[pos++]; }
static int v_feof(FILE* f) { isopen(f); return eof; }
static int v_ferror(FILE* f) { isopen(f); return err; }
/* ---- JSON library accessors, per their documentation */
static cJSON doc, item[3], arr[66];
static cJSON* parsed;
static int parses;
static cJSON* v_Parse(const char* t) {
  parses++;
  for (int i = 0; i < L; i++) vp_check((unsigned char)t[i] == content[i], "parser gets the file's text");
  vp_check(t[L] == 0, "text is zero terminated");
  return parsed;
}
static cJSON* v_ParseLen(const char* t, size_t n) {
  parses++;
  vp_check(n == (size_t)L || n == (size_t)L + 1, "parser gets the file's length");
  for (int i = 0; i < L; i++) vp_check((unsigned char)t[i] == content[i], "parser gets the file's text");
  return parsed;
}
static cJSON* v_Get(const cJSON* o, const char* s) {
  if (!o || !s) return NULL;
  for (cJSON* c = o->child; c; c = c->next) if (c->string && !strcmp(c->string, s)) return c;
  return NULL;
}
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ceq(const char* a, const char* b) { for (; *a && low(*a) == low(*b); a++, b++) {} return low(*a) == low(*b); }
static cJSON* v_GetCI(const cJSON* o, const char* s) { /* the library's other look-up: first name equal up to case */
  if (!o || !s) return NULL;
  for (cJSON* c = o->child; c; c = c->next) if (c->string && ceq(c->string, s)) return c;
  return NULL;
}
static cJSON_bool v_Has(const cJSON* o, const char* s) { return v_GetCI(o, s) != NULL; }
static cJSON_bool v_IsBool(const cJSON* i) { return i && (i->type & (cJSON_True | cJSON_False)) != 0; }
static cJSON_bool v_IsNull(const cJSON* i) { return i && (i->type & 0xFF) == cJSON_NULL; }
static cJSON_bool v_IsInvalid(const cJSON* i) { return i && (i->type & 0xFF) == cJSON_Invalid; }
static cJSON_bool v_IsRaw(const cJSON* i) { return i && (i->type & 0xFF) == cJSON_Raw; }
static cJSON_bool v_IsNumber(const cJSON* i) { return i && (i->type & 0xFF) == cJSON_Number; }
static cJSON_bool v_IsArray(const cJSON* i) { return i && (i->type & 0xFF) == cJSON_Array; }
static cJSON_bool v_IsString(const cJSON* i) { return i && (i->type & 0xFF) == cJSON_String; }
static cJSON_bool v_IsObject(const cJSON* i) { return i && (i->type & 0xFF) == cJSON_Object; }
static int v_Size(const cJSON* a) { int n = 0; if (!a) return 0; for (cJSON* c = a->child; c; c = c->next) n++; return n; }
static cJSON* v_Item(const cJSON* a, int k) { if (!a || k < 0) return NULL; cJSON* c = a->child; while (c && k > 0) { k--; c = c->next; } return c; }
static double v_Num(const cJSON* i) { return i->valuedouble; }
static const char* v_Err(void) { return NULL; }
static void v_Delete(cJSON* c) { (void)c; }
#define fopen v_fopen
#define fclose v_fclose
#define fseek v_fseek
#define ftell v_ftell
#define fseeko v_fseek
#define ftello v_ftell
#define rewind v_rewind
#define fread v_fread
#define fgetc v_fgetc
#undef getc
#define getc v_fgetc
#undef feof
#define feof v_feof
#undef ferror
#define ferror v_ferror
#define cJSON_Parse v_Parse
#define cJSON_GetObjectItemCaseSensitive v_Get
#define cJSON_GetObjectItem v_GetCI
#define cJSON_HasObjectItem v_Has
#define cJSON_IsBool v_IsBool
#define cJSON_IsNull v_IsNull
#define cJSON_IsInvalid v_IsInvalid
#define cJSON_IsRaw v_IsRaw
#define cJSON_ParseWithLength v_ParseLen
#define cJSON_IsNumber v_IsNumber
#define cJSON_IsArray v_IsArray
#define cJSON_IsString v_IsString
#define cJSON_IsObject v_IsObject
#define cJSON_GetArraySize v_Size
#define cJSON_GetArrayItem v_Item
#define cJSON_GetNumberValue v_Num
#define cJSON_GetErrorPtr v_Err
#define cJSON_Delete v_Delete
#include "json_utils.c"

static const int TYPES[] = {cJSON_Invalid, cJSON_False, cJSON_True, cJSON_NULL, cJSON_Number, cJSON_String, cJSON_Array, cJSON_Object, cJSON_Raw, cJSON_Number | cJSON_IsReference, cJSON_Array | cJSON_StringIsConst};
void vp_main(void) {
  int what = vp_param("what");
  L = vp_param("len");
  if (what <= 1) { /* files */
    for (int i = 0; i < L; i++) content[i] = (unsigned char)vp_int(what ? 1 : 0, 255);
    opfault = vp_param("ops") ? vp_int(1, 30) : 0;
    int kf = vp_param("mem") ? vp_int(1, 5) : 0, live = vp_live(), rc;
    vp_fault_arm(kf);
    if (what == 0) {
      char* t = NULL;
      rc = load_file_as_text("data.json", &t);
      if (rc == 0) {
        vp_check(t != NULL && vp_writable(t, L + 1), "text has room for its terminator");
        for (int i = 0; i < L; i++) vp_check((unsigned char)t[i] == content[i], "exact text of the file");
        vp_check(t[L] == 0, "text is zero terminated");
        free(t);
        vp_reach("loaded");
      } else vp_check(t == NULL, "no text handed out on an error");
    } else {
      cJSON* d = (cJSON*)&item[2];
      parsed = vp_param("parses") ? &doc : NULL;
      rc = load_file_to_json("data.json", &d);
      if (rc == 0) {
        vp_check(parsed != NULL, "text that does not parse is an error");
        vp_check(d == &doc && parses == 1, "parsed document handed out");
        vp_reach("loaded");
      }
      if (!opfired && !vp_fault_fired() && !parsed) vp_reach("no parse");
    }
    if (opfired || vp_fault_fired()) vp_reach("fault");
    if (vp_fault_fired()) vp_check(rc != 0, "out of memory is an error");
    if (!opfired && !vp_fault_fired() && (what == 0 || parsed)) vp_check(rc == 0, "a readable file loads");
    vp_check(opened == closed, "file closed exactly once");
    vp_check(vp_live() == live, "nothing leaked");
    return;
  }
  /* documents */
  int n = vp_param("n"), kind = vp_param("kind"), isnull = vp_param("null"), order = vp_param("order");
  int ty = TYPES[vp_pick(0, 10)];
  double dv[66];
  int iv[66];
  doc.type = cJSON_Object;
  item[0].string = "M"; item[0].type = cJSON_Number; item[0].valueint = 7; item[0].valuedouble = 7;
  item[1].string = order == 2 ? "other" : "m"; item[1].type = ty;
  item[2].string = "mm"; item[2].type = cJSON_Array; item[2].child = &arr[65];
  arr[65].type = cJSON_Number; arr[65].valuedouble = 3; arr[65].valueint = 3;
  int o0 = order == 1 ? 1 : 0, o1 = order == 1 ? 0 : 1;
  doc.child = &item[o0]; item[o0].next = &item[o1]; item[o1].next = &item[2];
  for (int i = 0; i < n; i++) {
    arr[i].type = cJSON_Number;
    if (kind == 0 || kind == 2) { iv[i] = arr[i].valueint = vp_int(-2147483647 - 1, 2147483647); arr[i].valuedouble = iv[i]; }
    else { dv[i] = arr[i].valuedouble = vp_real(-1e6, 1e6); arr[i].valueint = 1234; }
    arr[i].next = i + 1 < n ? &arr[i + 1] : NULL;
  }
  if ((ty & 0xff) == cJSON_Array || (ty & 0xff) == cJSON_Object) item[1].child = n ? &arr[0] : NULL;
  int sv = vp_int(-2147483647 - 1, 2147483647);
  double sd = vp_real(-1e6, 1e6);
  item[1].valuedouble = kind == 0 ? sv : sd; item[1].valueint = kind == 0 ? sv : 1234;
  cJSON* d = isnull ? NULL : &doc;
  int live = vp_live(), kf = vp_param("mem") ? vp_int(1, 5) : 0, rc, missing = isnull || order == 2;
  vp_fault_arm(kf);
  if (kind == 0) {
    l1c_int v = -77;
    rc = extract_json_int(d, "m", &v);
    int good = !missing && (ty & 0xff) == cJSON_Number;
    vp_check((rc == 0) == good, "status of an integer lookup");
    vp_check(v == (good ? sv : -77), "integer value");
    vp_reach(good ? "found" : "refused");
  } else if (kind == 1) {
    double v = -77;
    rc = extract_json_double(d, "m", &v);
    int good = !missing && (ty & 0xff) == cJSON_Number;
    vp_check((rc == 0) == good, "status of a number lookup");
    vp_same(v, good ? sd : -77, "number value");
    vp_reach(good ? "found" : "refused");
  } else {
    int good = !missing && (ty & 0xff) == cJSON_Array;
    l1c_int N = -5, *xi = NULL;
    double* xd = NULL;
    rc = kind == 2 ? extract_json_int_array(d, "m", &xi, &N) : extract_json_double_array(d, "m", &xd, &N);
    if (vp_fault_fired()) vp_check(rc != 0 || n == 0, "out of memory is an error"); else vp_check((rc == 0) == good, "status of an array lookup");
    if (rc) { vp_check(xi == NULL && xd == NULL, "no array handed out on an error"); vp_reach("refused"); }
    else {
      vp_check(N == n, "array length");
      if (n) vp_check(vp_writable(kind == 2 ? (void*)xi : (void*)xd, n * (kind == 2 ? 4 : 8)), "array has its length");
      for (int i = 0; i < n; i++) { if (kind == 2) vp_check(xi[i] == iv[i], "array values"); else vp_same(xd[i], dv[i], "array values"); }
      if (kind == 3 && n) vp_check(vp_aligned(xd, 64), "number array is aligned");
      vp_reach("found");
    }
    free(xi);
    if (xd) l1c_free_double(xd);
  }
  if (vp_fault_fired()) vp_reach("fault");
  vp_check(vp_live() == live, "nothing leaked");
}
