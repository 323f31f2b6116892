// writing and reading step-data files
#define H5_USE_18_API
#include <hdf5.h>
#include "MStepdata.hpp"
#include <stdexcept>
#define ST ((Stepdata*)st)
extern "C" {
void* sd_new(void* sp, const char* f, int profile) { try { return new Stepdata((Space*)sp, f, profile); } catch (const std::exception& e) { return nullptr; } }
int sd_write(void* st) { try { ST->write(); return 1; } catch (const std::exception& e) { return 0; } }
void sd_flush(void* st) { ST->flush(); }
void sd_free(void* st) { delete ST; }
// the rows of a data set; -1 if it is not there
long sd_read(const char* f, const char* name, double* out, long cap, long* cols) {
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    hid_t h = H5Fopen(f, H5F_ACC_RDONLY, H5P_DEFAULT); if (h < 0) return -2;
    hid_t d = H5Dopen2(h, name, H5P_DEFAULT); if (d < 0) { H5Fclose(h); return -1; }
    hid_t s = H5Dget_space(d); hsize_t n[8] = {}; int r = H5Sget_simple_extent_dims(s, n, NULL); long rows = n[0]; *cols = r == 2 ? long(n[1]) : -1;
    if (r == 2 && rows * *cols <= cap) { if (rows && H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, out) < 0) rows = -3; } else rows = -4;
    H5Sclose(s); H5Dclose(d); H5Fclose(h); return rows;
}
static herr_t add(hid_t, const char* n, const H5L_info_t*, void* p) { *(std::string*)p += std::string(n) + "\n"; return 0; }
// the names in a file or a group
const char* sd_names(const char* f, const char* group) {
    static std::string s; s.clear(); hid_t h = H5Fopen(f, H5F_ACC_RDONLY, H5P_DEFAULT); if (h < 0) return "?"; hid_t g = H5Gopen2(h, group, H5P_DEFAULT);
    if (g >= 0) { H5Literate(g, H5_INDEX_NAME, H5_ITER_INC, NULL, add, &s); H5Gclose(g); } H5Fclose(h); return s.c_str();
}
const char* sd_name(void* sp, long i) { static std::string s; Space* S = (Space*)sp; s = S->get_body_name(i < long(S->BodyList.size()) ? S->BodyList[i].get() : nullptr); return s.c_str(); }
}
