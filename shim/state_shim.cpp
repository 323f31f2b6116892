// saving and loading of a state by the real code
#include "TSpace.hpp"
#include <stdexcept>
#define SP (*(Space*)sp)
extern "C" {
int st_save(void* sp, const char* f) { try { SP.save(f); return 1; } catch (const std::exception& e) { return 0; } }
int st_load(void* sp, const char* f) { try { SP.load(f); return 1; } catch (const std::exception& e) { return 0; } }
int st_rootout(void* sp, int b, void* other) { SP.BodyList[b]->root_body = ((Space*)other)->BodyList[0]; return 1; }
void st_dropbody(void* sp, int b) { SP.BodyList.erase(SP.BodyList.begin() + b); }
}
