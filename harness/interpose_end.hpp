#undef atomic
#undef mutex
#undef condition_variable
#undef yield
