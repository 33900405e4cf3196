/* Native driver of one harness entry: replay of recorded inputs, or seeded random inputs. */
#define _GNU_SOURCE
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

void VP_ENTRY(void);

static uint64_t *inputs = NULL;
static size_t inputs_amount = 0;
static size_t position = 0;
static int mode_random = 0;
static uint64_t state;
static FILE *log_file = NULL;
static jmp_buf discard;
static long fail_alloc = -1;
static long alloc_count = 0;
static int alloc_active = 0;

void *__real_malloc(size_t size);
void *__real_realloc(void *ptr, size_t size);

static int alloc_fails(void)
{
	return alloc_active && fail_alloc >= 0 && alloc_count++ == fail_alloc;
}

void *__wrap_malloc(size_t size)
{
	return alloc_fails() ? NULL : __real_malloc(size);
}

void *__wrap_realloc(void *ptr, size_t size)
{
	return alloc_fails() ? NULL : __real_realloc(ptr, size);
}

static uint64_t next_random(void)
{
	state += 0x9E3779B97F4A7C15ull;
	uint64_t z = state;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

static uint64_t give(uint64_t value)
{
	if (log_file)
	{
		fprintf(log_file, "%llu\n", (unsigned long long)value);
		fflush(log_file);
	}
	return value;
}

void vp_assume_fail(void)
{
	if (mode_random)
	{
		longjmp(discard, 1);
	}
	fprintf(stderr, "VP: precondition not met by these inputs\n");
	exit(77);
}

void vp_check_fail(const char *msg)
{
	fprintf(stderr, "VP: FAILED %s\n", msg);
	fflush(stderr);
	_exit(99);
}

static uint64_t recorded(void)
{
	return position < inputs_amount ? inputs[position++] : 0;
}

uint64_t vp_range(uint64_t lo, uint64_t hi)
{
	if (!mode_random)
	{
		const uint64_t value = recorded();
		if (value < lo || value > hi)
		{
			vp_assume_fail();
		}
		return give(value);
	}

	const uint64_t n = hi - lo + 1;
	const uint64_t r = next_random();
	uint64_t value;
	switch (r & 7)
	{
		case 0:
			value = lo + ((r >> 8) & 3) % (n ? n : UINT64_MAX);
			break;
		case 1:
			value = hi - ((r >> 8) & 3) % (n ? n : UINT64_MAX);
			break;
		case 2:
			value = lo + (((uint64_t)1 << ((r >> 8) & 63)) + ((r >> 16) & 1) - 1) % (n ? n : UINT64_MAX);
			break;
		case 3:
			value = lo + ((r >> 8) & 255) % (n ? n : UINT64_MAX);
			break;
		default:
			value = n ? lo + next_random() % n : next_random();
			break;
	}
	return give(value);
}

uint64_t vp_u64(void)
{
	return vp_range(0, UINT64_MAX);
}

_Bool vp_small(void) { return getenv("VP_SMALL") != NULL; }

int main(int argc, char **argv)
{
	if (getenv("VP_FAIL_ALLOC"))
	{
		fail_alloc = atol(getenv("VP_FAIL_ALLOC"));
	}

	if (argc >= 3 && strcmp(argv[1], "replay") == 0)
	{
		FILE *f = fopen(argv[2], "r");
		unsigned long long value;
		inputs = __real_malloc(sizeof(uint64_t) * (1 << 20));
		while (f && inputs_amount < (1 << 20) && fscanf(f, "%llu", &value) == 1)
		{
			inputs[inputs_amount++] = value;
		}
		alloc_active = 1;
		VP_ENTRY();
		alloc_active = 0;
		return 0;
	}

	/* random SEED COUNT PROGRESS_FILE [LOG] */
	const uint64_t seed = strtoull(argv[2], NULL, 10);
	const uint64_t count = strtoull(argv[3], NULL, 10);
	const int progress = open(argv[4], O_RDWR | O_CREAT, 0600);
	if (argc > 5)
	{
		log_file = fopen(argv[5], "w");
	}

	mode_random = 1;
	volatile uint64_t done = 0;
	for (volatile uint64_t i = 0; i < count; i++)
	{
		const uint64_t current = seed + i;
		if (pwrite(progress, &current, sizeof(current), 0) < 0)
		{
			return 3;
		}
		state = current * 0xD1342543DE82EF95ull + 1;
		alloc_count = 0;
		if (getenv("VP_ALLOC_RANDOM"))
		{
			fail_alloc = (long)((current * 0x9E3779B97F4A7C15ull) >> 61) - 1;
		}
		alloc_active = 1;
		if (setjmp(discard) == 0)
		{
			VP_ENTRY();
			done++;
		}
		alloc_active = 0;
	}
	printf("VP: executed %llu of %llu\n", (unsigned long long)done, (unsigned long long)count);
	return 0;
}
