"""Which harness programs decide which property."""
def P(*progs, **kw): return dict(run=[dict(prog=p) if isinstance(p, str) else p for p in progs], **kw)
PLAN = {
  'C01': P('conn1'), 'C02': P('conn1'), 'C03': P('conn1'),
  'C04': P('conn2'), 'C05': P('conn2'), 'C06': P('conn2'),
  'C07': P('sock'), 'C08': P('conn3', 'sock'), 'C09': P('conn3'), 'C10': P('conn3'), 'C11': P('conn3'), 'C12': P('conn3', 'sock'),
  'C13': P('sock'), 'C14': P('sock'),
}
PLAN.update({
  'C15': P('file'), 'C16': P('file'),
  'C17': P('router'), 'C18': P('router'), 'C19': P('log'),
  'C20': P('proxy'), 'C21': P('proxy'),
})
RULES = {}
PLAN.update({p: P('client') for p in ('C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C31', 'C35')})
PLAN['C22'] = P('script')
PLAN['C30'] = P('nam')
PLAN['C34'] = P(dict(prog='thread', variant='tsan'), 'thread')
PLAN.update({'C32': P('misc'), 'C33': P('misc')})
PLAN['C36'] = P('keep', 'conn1', 'conn2', 'conn3', 'sock', 'file', 'router', 'log', 'proxy', 'client', 'script', 'misc', 'nam', 'stream')
PLAN['C37'] = P('stream')
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C13', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C33', 'C37'): PLAN[_p]['run'].append(dict(prog='scale'))
