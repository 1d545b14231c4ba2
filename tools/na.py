NA = {
 'C31': 'concurrency: the verifier proves sequential contracts (no interleaving semantics, no thread ownership logic for pthread callbacks is within reach of the installed deductive tools)',
 'C32': 'the guarantee is about the behaviour of other processes (fork, exec, pipes, exit statuses); a contract over this code would have to assume, not prove, everything the property says',
 'C33': 'the guarantee is about the state of the file system after a history of system calls; contracts would have to assume the kernel model that decides the property',
}
NOTES = {}
