// sundown's entry points, absent here, for harnesses that do not define them: no document, no events
#include "markdown.h"
extern "C" {
__attribute__((weak)) sd_markdown* sd_markdown_new(unsigned int, size_t, const sd_callbacks*, void*) { return nullptr; }
__attribute__((weak)) void sd_markdown_render(buf*, const uint8_t*, size_t, sd_markdown*) {}
__attribute__((weak)) void sd_markdown_free(sd_markdown*) {}
__attribute__((weak)) buf* bufnew(size_t) { return nullptr; }
__attribute__((weak)) void bufrelease(buf*) {}
}
