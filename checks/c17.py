"""C17: Xoofff."""
import deckcheck


def main():
    deckcheck.run('C17', 'xoofff', ['Xoofff'], '-DXOOFFF')
