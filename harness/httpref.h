/* reference reading of a message head: one pass over the bytes, written from the grammar
 *   request  = [eol] token 1*SP token 1*SP "HTTP/1." DIGIT eol *field eol
 *   response = "HTTP/1." DIGIT 1*SP 3DIGIT [SP text] eol *field eol
 *   field    = 1*tchar ":" *(SP / HT) text eol  /  (after a field) (SP / HT) text eol
 *   eol      = CR LF / LF
 * where a token holds no controls or spaces and text no controls but HT; trailing blanks are not part of a value. */
#define RMAX 3
enum { R_START, R_START_LF, R_METHOD, R_SP1, R_TARGET, R_SP2, R_VERSION, R_MINOR, R_EOL1, R_EOL1_LF,
       R_LINE, R_END_LF, R_NAME, R_BLANK, R_VALUE, R_VALUE_LF, R_DONE, R_DEAD,
       R_SPS, R_CODE, R_TEXT, R_TEXTB, R_TEXT_LF };
typedef struct { size_t from, to; } span;
typedef struct
{
  int state, sub, minor, code;
  size_t end, dead;                 /* where the head ends, where it became malformed */
  span method, target, text, name[RMAX], value[RMAX];
  size_t fields;
  int empty;                        /* no method: malformed, noticed when the version is due */
} ref;

static int r_tchar(unsigned char c)
{
  return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '!' || (c >= '#' && c <= '\'') ||
    c == '*' || c == '+' || c == '-' || c == '.' || c == '^' || c == '_' || c == '`' || c == '|' || c == '~';
}
static int r_ctl(unsigned char c) { return c < 32 || c == 127; }

static void r_step(ref *r, unsigned char c, size_t i, size_t max)
{
  static const char version[] = "HTTP/1.";

  switch (r->state)
  {
  case R_START:
    if (c == '\r')
      r->state = R_START_LF;
    else if (c == '\n')
      r->state = R_METHOD, r->method.from = r->method.to = i + 1, r->sub = 0;
    else if (r_ctl(c))
      r->state = R_DEAD;
    else if (c == ' ')
      r->state = R_SP1, r->empty = 1;
    else
      r->state = R_METHOD, r->method.from = i, r->method.to = i + 1;
    break;
  case R_START_LF:
    r->state = c == '\n' ? R_METHOD : R_DEAD;
    r->method.from = r->method.to = i + 1;
    break;
  case R_METHOD:
    if (c == ' ')
      r->state = R_SP1, r->empty = r->method.to == r->method.from;
    else if (r_ctl(c))
      r->state = R_DEAD;
    else
      r->method.to = i + 1;
    break;
  case R_SP1:
    if (c == ' ')
      break;
    r->state = r_ctl(c) ? R_DEAD : R_TARGET;
    r->target.from = i;
    r->target.to = i + 1;
    break;
  case R_TARGET:
    if (c == ' ')
      r->state = R_SP2;
    else if (r_ctl(c))
      r->state = R_DEAD;
    else
      r->target.to = i + 1;
    break;
  case R_SP2:
    if (c == ' ')
      break;
    r->state = c == 'H' && !r->empty ? R_VERSION : R_DEAD;
    r->sub = 1;
    break;
  case R_VERSION:
    if (c != version[r->sub])
      r->state = R_DEAD;
    else if (++r->sub == 7)
      r->state = R_MINOR;
    break;
  case R_MINOR:
    r->minor = c - '0';
#ifdef RESPONSE
    r->state = c >= '0' && c <= '9' ? R_SPS : R_DEAD;
    r->sub = 0;
    break;
  case R_SPS:
    if (c == ' ')
    {
      r->sub = 1;
      break;
    }
    r->code = c - '0';
    r->state = r->sub && c >= '0' && c <= '9' ? R_CODE : R_DEAD;
    r->sub = 1;
    break;
  case R_CODE:
    if (r->sub < 3)
    {
      r->code = r->code * 10 + (c - '0');
      r->sub++;
      if (c < '0' || c > '9')
        r->state = R_DEAD;
      break;
    }
    r->text.from = r->text.to = i;
    /* other text right after the code: malformed, noticed when the line ends */
    r->empty = c != ' ' && c != '\r' && c != '\n';
    r->state = c == ' ' ? R_TEXTB : c == '\r' ? R_TEXT_LF : c == '\n' ? R_LINE : r_ctl(c) && c != '\t' ? R_DEAD : R_TEXT;
    if (c == ' ')
      r->text.from = r->text.to = i + 1;
    break;
  case R_TEXTB:
  case R_TEXT:
    if (c == '\r')
      r->state = R_TEXT_LF;
    else if (c == '\n')
      r->state = r->empty ? R_DEAD : R_LINE;
    else if (r_ctl(c) && c != '\t')
      r->state = R_DEAD;
    else if (r->state == R_TEXTB && c == ' ')
      r->text.from = r->text.to = i + 1;
    else
      r->state = R_TEXT, r->text.to = i + 1;
    break;
  case R_TEXT_LF:
    r->state = c == '\n' && !r->empty ? R_LINE : R_DEAD;
    break;
#else
    r->state = c >= '0' && c <= '9' ? R_EOL1 : R_DEAD;
    break;
  case R_EOL1:
    r->state = c == '\r' ? R_EOL1_LF : c == '\n' ? R_LINE : R_DEAD;
    break;
  case R_EOL1_LF:
    r->state = c == '\n' ? R_LINE : R_DEAD;
    break;
#endif
  case R_LINE:
    if (c == '\r')
      r->state = R_END_LF;
    else if (c == '\n')
      r->state = R_DONE, r->end = i + 1;
    else if (r->fields == max)
      r->state = R_DEAD;
    else if ((c == ' ' || c == '\t') && r->fields > 0)
    {
      r->name[r->fields].from = r->name[r->fields].to = 0;
      r->value[r->fields].from = r->value[r->fields].to = i;
      r->state = R_VALUE;
    }
    else
    {
      r->name[r->fields].from = i;
      r->state = r_tchar(c) ? R_NAME : R_DEAD;
    }
    break;
  case R_END_LF:
    r->state = c == '\n' ? R_DONE : R_DEAD;
    r->end = i + 1;
    break;
  case R_NAME:
    r->name[r->fields].to = i;
    if (c == ':')
      r->state = R_BLANK, r->value[r->fields].from = r->value[r->fields].to = i + 1;
    else if (!r_tchar(c))
      r->state = R_DEAD;
    break;
  case R_BLANK:
    r->value[r->fields].from = r->value[r->fields].to = i;
    if (c == ' ' || c == '\t')
      break;
    /* fallthrough */
  case R_VALUE:
    if (c == '\r')
      r->state = R_VALUE_LF;
    else if (c == '\n')
      r->state = R_LINE, r->fields++;
    else if (r_ctl(c) && c != '\t')
      r->state = R_DEAD;
    else
    {
      r->state = R_VALUE;
      if (c != ' ' && c != '\t')
        r->value[r->fields].to = i + 1;
    }
    break;
  case R_VALUE_LF:
    r->state = c == '\n' ? R_LINE : R_DEAD;
    r->fields++;
    break;
  }
  if (r->state == R_DEAD && r->dead == (size_t) -1)
    r->dead = i;
}
