// The list functions of libstdc++ that are not inline, compiled with instrumentation: a preemption can
// fall between their stores as it can on a real machine (std::list is the queue of the dispatch thread,
// of the active objects and of the log output streams).
#include <list>
namespace std _GLIBCXX_VISIBILITY(default) { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
{
  this->_M_next = pos;
  this->_M_prev = pos->_M_prev;
  pos->_M_prev->_M_next = this;
  pos->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
  _List_node_base* const next = this->_M_next;
  _List_node_base* const prev = this->_M_prev;
  prev->_M_next = next;
  next->_M_prev = prev;
}
} }
