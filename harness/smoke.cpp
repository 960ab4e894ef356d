#include "model.h"
using namespace mm; using namespace mon;
int main() {
  PdfMemDocument d; auto& o=d.GetObjects().CreateDictionaryObject(); o.GetOrCreateStream().SetData(bufferview("hello hello hello hello",23), PdfFilterList{});
  d.GetCatalog().GetDictionary().AddKeyIndirect("X",o);
  auto s=saveToString(d); PdfMemDocument e; e.LoadFromBuffer(s); auto& x=*e.GetCatalog().GetDictionary().FindKey("X"); printf("%zu [%s]\n", x.GetStream()->GetLength(), streamDecoded(*x.GetStream()).c_str());
}
