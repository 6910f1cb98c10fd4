// storage of std::cout/cerr/clog/cin (constructed in cxx.cpp)
namespace std {
alignas(16) char cout[512]; alignas(16) char cerr[512]; alignas(16) char clog[512]; alignas(16) char cin[512];
}
