// Independent image encoders/decoders on top of libpng/libjpeg, used as the
// oracle for the library's image code.
#pragma once
#include "tutil.h"
#include "PNGUtil.h"
#include "JPGUtil.h"
#include <csetjmp>
#include <png.h>
#include <jpeglib.h>
#include <dirent.h>

namespace im {
using vh::Rng;
struct Img { unsigned w = 0, h = 0, c = 0, depth = 8; std::vector<unsigned> v; unsigned& at(unsigned x, unsigned y, unsigned k) { return v[(y * w + x) * c + k]; } };
inline size_t openfds() { size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }

inline Img noise(Rng& r, unsigned w, unsigned h, unsigned c, unsigned depth) {
  Img i; i.w = w; i.h = h; i.c = c; i.depth = depth; i.v.resize((size_t)w * h * c);
  unsigned mx = (1u << depth) - 1; int style = (int)r.range(0, 3); unsigned base = r.range(0, mx);
  for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) for (unsigned k = 0; k < c; k++)
    i.at(x, y, k) = style == 0 ? (unsigned)r.range(0, mx) : style == 1 ? (x * 7 + y * 13 + k * 101 + base) & mx : style == 2 ? (r.chance(0.5) ? mx : 0) : (unsigned)((uint64_t)mx * (x + y) / (w + h)) ;
  return i;
}
// type: PNG_COLOR_TYPE_*
inline std::string png(Rng& r, const Img& m, int type, bool extras = true) {
  std::string out;
  png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0);
  png_infop q = png_create_info_struct(p);
  if (setjmp(png_jmpbuf(p))) abort();
  png_set_write_fn(p, &out, [](png_structp s, png_bytep d, png_size_t n) { ((std::string*)png_get_io_ptr(s))->append((char*)d, n); }, [](png_structp) {});
  png_set_IHDR(p, q, m.w, m.h, m.depth, type, r.chance(0.3) ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
  png_set_compression_level(p, (int)r.range(0, 9));
  png_set_filter(p, 0, r.chance(0.5) ? PNG_ALL_FILTERS : (int)r.pick(std::vector<int>{PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH}));
  png_color pal[256]; for (int i = 0; i < 256; i++) { pal[i].red = (png_byte)i; pal[i].green = (png_byte)(255 - i); pal[i].blue = 7; }
  if (type == PNG_COLOR_TYPE_PALETTE) png_set_PLTE(p, q, pal, 1 << m.depth);
  if (extras && r.chance(0.3)) png_set_gAMA(p, q, r.real(0.3, 2.5));
  if (extras && r.chance(0.2)) { png_text t; memset(&t, 0, sizeof t); t.compression = PNG_TEXT_COMPRESSION_NONE; t.key = (char*)"Comment"; t.text = (char*)"x"; png_set_text(p, q, &t, 1); }
  if (extras && r.chance(0.2) && !(type & PNG_COLOR_MASK_ALPHA) && type != PNG_COLOR_TYPE_PALETTE) { png_color_16 t; memset(&t, 0, sizeof t); t.gray = m.v[0]; t.red = m.v[0]; png_set_tRNS(p, q, 0, 0, &t); }
  png_write_info(p, q);
  if (m.depth < 8) png_set_packing(p);
  std::vector<std::vector<png_byte>> rows(m.h);
  std::vector<png_bytep> ptr;
  for (unsigned y = 0; y < m.h; y++) {
    for (unsigned x = 0; x < m.w * m.c; x++) { unsigned v = m.v[(size_t)y * m.w * m.c + x]; if (m.depth == 16) rows[y].push_back(v >> 8); rows[y].push_back(v & 255); }
    ptr.push_back(rows[y].data());
  }
  png_write_image(p, ptr.data());
  png_write_end(p, q);
  png_destroy_write_struct(&p, &q);
  return out;
}
inline std::string jpg(Rng& r, const Img& m, int quality) {
  jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); jpeg_create_compress(&c);
  unsigned char* mem = 0; unsigned long n = 0; jpeg_mem_dest(&c, &mem, &n);
  c.image_width = m.w; c.image_height = m.h; c.input_components = m.c; c.in_color_space = m.c == 1 ? JCS_GRAYSCALE : m.c == 3 ? JCS_RGB : JCS_CMYK;
  jpeg_set_defaults(&c); jpeg_set_quality(&c, quality, TRUE);
  if (r.chance(0.3)) jpeg_simple_progression(&c);
  if (r.chance(0.3)) c.comp_info[0].h_samp_factor = c.comp_info[0].v_samp_factor = 1;
  if (r.chance(0.3)) c.restart_interval = 1;
  jpeg_start_compress(&c, TRUE);
  std::vector<JSAMPLE> row(m.w * m.c); JSAMPROW rp = row.data();
  while (c.next_scanline < m.h) { for (unsigned x = 0; x < m.w * m.c; x++) row[x] = m.v[(size_t)c.next_scanline * m.w * m.c + x]; jpeg_write_scanlines(&c, &rp, 1); }
  jpeg_finish_compress(&c); jpeg_destroy_compress(&c);
  std::string s((char*)mem, n); free(mem); return s;
}
struct JErr { jpeg_error_mgr b; jmp_buf j; };
inline bool unjpg(const std::string& s, Img& o) {
  jpeg_decompress_struct c; JErr e; c.err = jpeg_std_error(&e.b);
  e.b.error_exit = [](j_common_ptr p) { longjmp(((JErr*)p->err)->j, 1); };
  e.b.output_message = [](j_common_ptr) {};
  jpeg_create_decompress(&c);
  if (setjmp(e.j)) { jpeg_destroy_decompress(&c); return false; }
  jpeg_mem_src(&c, (const unsigned char*)s.data(), s.size());
  jpeg_read_header(&c, TRUE); jpeg_start_decompress(&c);
  o.w = c.output_width; o.h = c.output_height; o.c = c.output_components; o.depth = 8; o.v.assign((size_t)o.w * o.h * o.c, 0);
  JSAMPARRAY row = (*c.mem->alloc_sarray)((j_common_ptr)&c, JPOOL_IMAGE, o.w * o.c, 1);
  while (c.output_scanline < c.output_height) { unsigned y = c.output_scanline; jpeg_read_scanlines(&c, row, 1); for (unsigned x = 0; x < o.w * o.c; x++) o.v[(size_t)y * o.w * o.c + x] = row[0][x]; }
  jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c);
  return true;
}
// decodes what the library wrote; 8-bit RGB expected
inline bool unpng(const std::string& s, Img& o) {
  struct S { const std::string* s; size_t p; } st{&s, 0};
  png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop q = png_create_info_struct(p);
  if (setjmp(png_jmpbuf(p))) { png_destroy_read_struct(&p, &q, 0); return false; }
  png_set_read_fn(p, &st, [](png_structp h, png_bytep d, png_size_t n) { S* t = (S*)png_get_io_ptr(h); if (t->p + n > t->s->size()) png_error(h, "eof"); memcpy(d, t->s->data() + t->p, n); t->p += n; });
  png_read_info(p, q);
  o.w = png_get_image_width(p, q); o.h = png_get_image_height(p, q); o.c = png_get_channels(p, q); o.depth = png_get_bit_depth(p, q);
  if (o.depth != 8 || png_get_color_type(p, q) != PNG_COLOR_TYPE_RGB) { png_destroy_read_struct(&p, &q, 0); return false; }
  o.v.assign((size_t)o.w * o.h * o.c, 0);
  std::vector<png_byte>* buf = new std::vector<png_byte>((size_t)o.w * o.h * o.c); std::vector<png_bytep>* rows = new std::vector<png_bytep>;
  for (unsigned y = 0; y < o.h; y++) rows->push_back(buf->data() + (size_t)y * o.w * o.c);
  png_read_image(p, rows->data()); png_read_end(p, q); png_destroy_read_struct(&p, &q, 0);
  for (size_t i = 0; i < buf->size(); i++) o.v[i] = (*buf)[i];
  delete buf; delete rows;
  return true;
}
}  // namespace im
