// Stand-in for yaz++ (not installed here): records of one result set by position, composition and syntax.
#pragma once
#include <yaz/proto.h>
extern "C" Z_NamePlusRecord *yaz_clone_z_NamePlusRecord(Z_NamePlusRecord *q, NMEM nmem_out);
extern "C" int mp_comp_eq(const Z_RecordComposition *a, const Z_RecordComposition *b);
extern "C" Z_RecordComposition *mp_comp_copy(NMEM m, const Z_RecordComposition *c);
extern "C" int mp_oid_eq(const Odr_oid *a, const Odr_oid *b);
extern "C" Odr_oid *mp_oid_copy(NMEM m, const Odr_oid *a);
namespace yazpp_1 {
    class RecordCache {
        struct E { E *next; Odr_int off; Z_RecordComposition *comp; Z_NamePlusRecord *rec; };
    public:
        RecordCache() : m(nmem_create()), l(0) {}
        ~RecordCache() { nmem_destroy(m); }
        void add(ODR o, Z_NamePlusRecordList *npr, Odr_int start, Z_RecordComposition *comp) {
            for (int i = 0; i < npr->num_records; i++) {
                E *e = (E *)nmem_malloc(m, sizeof *e);
                e->next = l; l = e; e->off = start + i; e->comp = mp_comp_copy(m, comp);
                e->rec = yaz_clone_z_NamePlusRecord(npr->records[i], m);
            }
        }
        static bool hit(E *e, Odr_int off, Odr_oid *syntax, Z_RecordComposition *comp) {
            if (e->off != off || !mp_comp_eq(e->comp, comp)) return false;
            if (e->rec->which == Z_NamePlusRecord_surrogateDiagnostic) return true;
            return e->rec->which == Z_NamePlusRecord_databaseRecord && syntax && mp_oid_eq(syntax, e->rec->u.databaseRecord->direct_reference);
        }
        int lookup(ODR o, Z_NamePlusRecordList **npr, Odr_int start, Odr_int num, Odr_oid *syntax, Z_RecordComposition *comp) {
            *npr = (Z_NamePlusRecordList *)odr_malloc(o, sizeof **npr);
            (*npr)->num_records = (int)num; (*npr)->records = (Z_NamePlusRecord **)odr_malloc(o, sizeof(Z_NamePlusRecord *) * (num ? num : 1));
            for (Odr_int i = 0; i < num; i++) {
                E *e = l;
                while (e && !hit(e, start + i, syntax, comp)) e = e->next;
                if (!e) return 0;
                (*npr)->records[i] = e->rec;
            }
            return 1;
        }
        void clear() { nmem_reset(m); l = 0; }
        void set_max_size(int) {}
        NMEM m; E *l;
    };
}
