"""C22: accesses stay within the stated buffers and never-written memory does not influence results."""
import observe


def main():
    c = observe.main('C22', 'memory')
    c.assumptions = ['buffers are objects of exactly the stated sizes; addresses are concrete on every path, contents symbolic',
                     'data-dependent branches are followed both ways']
    c.run()
