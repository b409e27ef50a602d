"""Downloads."""
from vlib import build
from .common import run_pairs


def download(ck):
    ck.assume('the local name is a regular file or nothing', 'a session can be created; the transfer delivers up to two blocks and may fail before, between and after them',
              'any of opening, writing and closing the local file may fail', 'the transfer library behaves as drivers/fakecurl/curl/curl.h')
    run_pairs(ck, 'webget', [], 'download', 'src/web/http_get.cpp', inc=['-I' + build.VERIF + '/drivers/fakecurl', '-I' + build.REPO + '/src', '-I' + build.REPO + '/src/web'],
              pipeline=build.CALLS, limit=10 ** 6, pairs_kw=dict(pure_calls=('pure_',), budget=60))
