"""C19: SANSE sessions."""
import sanecheck


def main():
    sanecheck.run('C19', True)
