"""C18: SANE sessions."""
import sanecheck


def main():
    sanecheck.run('C18', False)
