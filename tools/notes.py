# NOTE[...] = level notes per property
