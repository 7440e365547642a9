import sys; sys.path.insert(0,'/tmp')
exec(open('/tmp/mkseed.py').read())
HDR = r'''
#include "mfast.h"
#include "mfast/coder/fast_encoder.h"
#include "mfast/coder/fast_decoder.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <stdexcept>
using namespace mfast;
static void check(bool b, const char *what) {
  if (!b) { std::printf("FAILED: %s\n", what); std::exit(1); }
}
'''
def main(body): return HDR + "int main() {\n try {\n" + body + '\n } catch (std::exception &e) { std::printf("FAILED: exception %s\\n", e.what()); return 1; }\n std::puts("ok");\n return 0;\n}\n'

mkseed('c01-active-template-after-nested','C01',
 [('src/mfast/coder/decoder/fast_decoder.cpp','  active_message_ = saved_active_message;\n','  if (saved_active_message == nullptr)\n    active_message_ = saved_active_message;\n')],
 'run-time decoder; a message with a dynamic templateRef to another template, followed by a message of the outer template again (its template id is then omitted)',
 'the decoder keeps the template of the nested message as the current one, so the next message is decoded with the wrong template',
 main(r'''
 dynamic_templates_description d("<templates><template name=\"O\" id=\"1\"><uInt32 name=\"a\"/><templateRef/></template><template name=\"I\" id=\"2\"><string name=\"s\"/></template></templates>");
 const templates_description *ds[] = {&d};
 malloc_allocator *al = malloc_allocator::instance();
 fast_encoder e(al); fast_decoder dec(al);
 e.include(ds, 1); dec.include(ds, 1);
 for (int k = 0; k < 3; ++k) {
   message_type m(al, d.instruction_with_id(1));
   uint32_mref(m.ref()[0]).as(100 + k);
   nested_message_mref n(m.ref()[1]);
   n.set_target_instruction(d.instruction_with_id(2), true);
   ascii_string_mref(n.target()[0]).as("xy");
   char buf[200];
   std::size_t len = e.encode(m.cref(), buf, sizeof buf);
   const char *p = buf;
   message_cref r = dec.decode(p, buf + len);
   check(p == buf + len, "all bytes consumed");
   check(r.id() == 1, "template of the decoded message");
   check(uint32_cref(r[0]).value() == 100u + k, "value");
 }'''))

mkseed('c08-pmap-space-after-56-bits','C08',
 [('src/mfast/coder/encoder/encoder_presence_map.h','    maxbytes_ -= sizeof(std::size_t);\n','    maxbytes_ -= sizeof(std::size_t) - 1;\n')],
 'a segment whose presence map has more than 56 bits',
 'after the first eight bytes of a presence map the encoder counts one byte too few as written and pads the map beyond the room reserved for it, over the fields which follow',
 main(r'''
 std::string x = "<templates><template name=\"T\" id=\"1\">";
 for (int k = 0; k < 58; ++k) x += "<uInt32 name=\"f" + std::to_string(k) + "\"><copy/></uInt32>";
 x += "</template></templates>";
 dynamic_templates_description d(x.c_str());
 const templates_description *ds[] = {&d};
 malloc_allocator *al = malloc_allocator::instance();
 fast_encoder e(al); fast_decoder dec(al);
 e.include(ds, 1); dec.include(ds, 1);
 for (int k = 0; k < 4; ++k) {
   message_type m(al, d.instruction_with_id(1));
   for (int f = 0; f < 58; ++f) uint32_mref(m.ref()[f]).as(f * 3 + (f % (k + 1)));
   std::vector<char> buf(1000);
   std::size_t len = e.encode(m.cref(), buf.data(), buf.size());
   const char *p = buf.data();
   message_cref r = dec.decode(p, buf.data() + len);
   check(p == buf.data() + len, "all bytes consumed");
   for (int f = 0; f < 58; ++f) check(uint32_cref(r[f]).value() == (unsigned)(f * 3 + (f % (k + 1))), "value");
 }'''))

mkseed('c10-exponent-not-reset','C10',
 [('src/mfast/coder/common/dictionary_builder.cpp','  repo_base_.add_reset_entry(candidate_storage);\n','  // the exponent and the mantissa of a decimal are reset together\n  if (field_type != field_type_exponent)\n    repo_base_.add_reset_entry(candidate_storage);\n')],
 'a decimal field with individual operators whose exponent has copy, increment or delta; a message, then a reset',
 'the previous value of the exponent survives a reset',
 main(r'''
 dynamic_templates_description d("<templates><template name=\"T\" id=\"1\"><decimal name=\"d\"><exponent><copy/></exponent><mantissa><delta/></mantissa></decimal></template></templates>");
 const templates_description *ds[] = {&d};
 malloc_allocator *al = malloc_allocator::instance();
 auto enc = [&](fast_encoder &e, bool reset) {
   message_type m(al, d.instruction_with_id(1));
   decimal_mref(m.ref()[0]).as(5, -2);
   char buf[100];
   std::size_t n = e.encode(m.cref(), buf, sizeof buf, reset);
   return std::string(buf, n);
 };
 fast_encoder used(al), fresh(al);
 used.include(ds, 1); fresh.include(ds, 1);
 enc(used, true);
 check(enc(used, true) == enc(fresh, true), "bytes after a reset are those of a new encoder");
 fast_decoder dec(al); dec.include(ds, 1);
 for (int k = 0; k < 2; ++k) {
   std::string s = enc(used, true);
   const char *p = s.data();
   decimal_cref r(dec.decode(p, s.data() + s.size(), true)[0]);
   check(r.mantissa() == 5 && r.exponent() == -2, "value");
 }'''))

mkseed('c15-insert-input-iterators','C15',
 [('src/mfast/vector_ref.h','''      position = insert(position, *first);
      ++position;
''','''      position = insert(position, *first);
      if (this->size() > 1)
        position = this->begin() + (position - this->begin());
''')],
 'insert() of a range of two or more elements given by iterators which are only input iterators',
 'the elements are inserted in reverse order',
 main(r'''
 dynamic_templates_description d("<templates><template name=\"T\" id=\"1\"><byteVector name=\"v\"/></template></templates>");
 malloc_allocator *al = malloc_allocator::instance();
 struct In {
   typedef std::input_iterator_tag iterator_category; typedef unsigned char value_type; typedef std::ptrdiff_t difference_type;
   typedef const unsigned char *pointer; typedef const unsigned char &reference;
   const unsigned char *p;
   reference operator*() const { return *p; }
   In &operator++() { ++p; return *this; }
   In operator++(int) { In r = *this; ++p; return r; }
   bool operator==(const In &o) const { return p == o.p; }
   bool operator!=(const In &o) const { return p != o.p; }
 };
 message_type m(al, d.instruction_with_id(1));
 byte_vector_mref v(m.ref()[0]);
 const unsigned char a[] = {1, 2, 3}, b[] = {7, 8, 9};
 v.assign(a, a + 3);
 v.insert(v.begin() + 1, In{b}, In{b + 3});
 const unsigned char want[] = {1, 7, 8, 9, 2, 3};
 check(v.size() == 6, "size");
 for (int k = 0; k < 6; ++k) check(v[k] == want[k], "order of the elements");'''))

mkseed('c06-sputc-one-past','C06',
 [('src/mfast/coder/encoder/fast_ostreambuf.h','  while (pptr_ >= epptr_)\n','  while (pptr_ > epptr_)\n')],
 'a fixed buffer exactly one byte smaller than the message, the last thing written being a single byte (a NULL, an empty string)',
 'the encoder writes one byte past the end of the buffer and reports a length larger than the buffer instead of throwing',
 main(r'''
 dynamic_templates_description d("<templates><template name=\"T\" id=\"1\"><uInt32 name=\"a\" presence=\"optional\"/><uInt32 name=\"b\" presence=\"optional\"/></template></templates>");
 const templates_description *ds[] = {&d};
 malloc_allocator *al = malloc_allocator::instance();
 for (std::size_t size = 1; size < 6; ++size) {
   fast_encoder e(al); e.include(ds, 1);
   message_type m(al, d.instruction_with_id(1));
   uint32_mref(m.ref()[0]).as(1000);
   std::vector<char> buf(size + 16, '\x55');
   bool thrown = false; std::size_t n = 0;
   try { n = e.encode(m.cref(), buf.data(), size); } catch (std::exception &) { thrown = true; }
   check(thrown || n <= size, "length within the buffer");
   for (std::size_t k = size; k < buf.size(); ++k) check(buf[k] == '\x55', "nothing written past the buffer");
 }'''))

mkseed('c04-delta-front-removal','C04',
 [('src/mfast/coder/decoder_v2/fast_decoder_core.h','        substraction_length >= 0 ? substraction_length : ~substraction_length;\n','        substraction_length >= 0 ? substraction_length : -substraction_length;\n'),
  ('src/mfast/coder/decoder/decoder_field_operator.cpp','          substraction_length >= 0 ? substraction_length : ~substraction_length;\n','          substraction_length >= 0 ? substraction_length : -substraction_length;\n')],
 'a string delta which removes the whole base value from the front (subtraction length -(n+1)), or prepends to an empty base; mFAST\'s own encoders never send it',
 'the decoders reject a valid stream with D7',
 main(r'''
 dynamic_templates_description d("<templates><template name=\"T\" id=\"1\"><string name=\"s\"><delta value=\"ab\"/></string></template></templates>");
 const templates_description *ds[] = {&d};
 malloc_allocator *al = malloc_allocator::instance();
 fast_decoder dec(al); dec.include(ds, 1);
 const char stream[] = "\xC0\x81\xFD\x78\xF9"; // pmap, id 1, -3: remove two from the front, "xy"
 const char *p = stream;
 message_cref r = dec.decode(p, stream + 5);
 check(ascii_string_cref(r[0]).value() == "xy" && p == stream + 5, "value");'''))

mkseed('c24-mantissa-shared','C24',
 [('src/mfast/coder/common/dictionary_builder.cpp','''    dest->mantissa_instruction_ = new (alloc_)
        mantissa_field_instruction(*src_inst->mantissa_instruction_);
''','''    // dest is a copy of src_inst, including its mantissa
    dest->mantissa_instruction_ = src_inst->mantissa_instruction_;
''')],
 'two codecs over the same description with a decimal field with individual operators, the mantissa having copy, increment or delta; their calls interleaved',
 'the previous value of the mantissa is shared between all codecs created from the same description',
 main(r'''
 dynamic_templates_description d("<templates><template name=\"T\" id=\"1\"><decimal name=\"d\"><exponent><copy/></exponent><mantissa><delta/></mantissa></decimal></template></templates>");
 const templates_description *ds[] = {&d};
 malloc_allocator *al = malloc_allocator::instance();
 fast_encoder a(al), b(al);
 a.include(ds, 1); b.include(ds, 1);
 auto enc = [&](fast_encoder &e, int v) {
   message_type m(al, d.instruction_with_id(1));
   decimal_mref(m.ref()[0]).as(v, -2);
   char buf[100];
   return std::string(buf, e.encode(m.cref(), buf, sizeof buf));
 };
 std::vector<std::string> alone;
 { fast_encoder x(al); x.include(ds, 1); for (int v : {10, 12, 15}) alone.push_back(enc(x, v)); }
 fast_encoder p(al), q(al);
 p.include(ds, 1); q.include(ds, 1);
 int k = 0;
 for (int v : {10, 12, 15}) { check(enc(p, v) == alone[k++], "bytes are those of an encoder which is alone"); enc(q, 500 * k); }'''))

mkseed('c01-decimal-copy-ignores-exponent','C03',
 [('src/mfast/coder/encoder/encoder_field_operator.cpp','''           v.mantissa() == prev.of_decimal.mantissa_ &&
           v.exponent() == prev.of_decimal.exponent_;
''','''           v.mantissa() == prev.of_decimal.mantissa_ &&
           (v.exponent() == prev.of_decimal.exponent_ || v.mantissa() == 0);
''')],
 'decimal field with copy operator; two successive zeros with different exponents',
 'the encoder says "unchanged" for 0e-2 after 0e5, so the receiver gets another exponent',
 main(r'''
 dynamic_templates_description d("<templates><template name=\"T\" id=\"1\"><decimal name=\"d\"><copy/></decimal></template></templates>");
 const templates_description *ds[] = {&d};
 malloc_allocator *al = malloc_allocator::instance();
 fast_encoder e(al); e.include(ds, 1);
 fast_decoder dec(al); dec.include(ds, 1);
 int k = 0;
 for (int x : {5, -2, 3}) {
   message_type m(al, d.instruction_with_id(1));
   decimal_mref(m.ref()[0]).as(0, x);
   char buf[100];
   std::size_t n = e.encode(m.cref(), buf, sizeof buf);
   const char *p = buf;
   decimal_cref r(dec.decode(p, buf + n)[0]);
   check(r.mantissa() == 0 && r.exponent() == x, "exponent of a zero");
   ++k;
 }'''))
