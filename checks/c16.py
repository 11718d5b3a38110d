"""C16: Kravatte."""
import deckcheck


def main():
    deckcheck.run('C16', 'kravatte', ['Kravatte'], '')
